//! Seeded search over runs, minimisation, replay files, evidence.
use crate::rng::{hash_bytes, mix};
use crate::sim::{ChoiceOverflow, SharedTape, Source, Stats};
use crate::{seam, RunResult, Sim, Violation};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub struct Scenario {
    pub name: &'static str,
    /// Relative share of runs.
    pub weight: u64,
    pub run: fn(&Sim) -> RunResult,
}

pub struct Property {
    pub id: &'static str,
    pub scenarios: Vec<Scenario>,
    /// Runs of the quick tier.
    pub quick_runs: u64,
    /// Wall-clock budget of the thorough tier, seconds.
    pub thorough_secs: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// Probes that a healthy batch must have hit at least once.
    pub must_hit: &'static [&'static str],
}

/// Real (not simulated) monotonic time in seconds.
pub fn real_now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts as *mut _) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}
fn real_sleep(ms: u64) {
    let ts = libc::timespec { tv_sec: (ms / 1000) as i64, tv_nsec: ((ms % 1000) * 1_000_000) as i64 };
    unsafe { libc::nanosleep(&ts, std::ptr::null_mut()) };
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_RUN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Panics on the calling thread are captured silently instead of printed: for
/// threads a run starts to stand for processes of their own.
pub fn quiet_thread() { IN_RUN.with(|r| r.set(true)); }

pub const HARNESS_TAG: &str = "HARNESS-ERROR:";

fn install_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if IN_RUN.with(|r| r.get()) {
            let p = i.payload();
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else if p.downcast_ref::<ChoiceOverflow>().is_some() {
                "choice overflow".into()
            } else {
                "<panic>".into()
            };
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|x| {
                let mut x = x.borrow_mut();
                if x.is_none() { *x = Some(format!("{m} at {loc}")); }
            });
            if std::env::var_os("SIM_BT").is_some() {
                eprintln!("panic: {m} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
            }
        } else {
            def(i)
        }
    }));
}

pub struct Outcome {
    pub violation: Option<Violation>,
    pub harness_error: Option<String>,
    pub tape: Vec<u64>,
    pub stats: Stats,
    pub log: Vec<String>,
}

/// Executes one run on a fresh thread.
pub fn run_once(f: fn(&Sim) -> RunResult, src: Source, seed: u64, trace: bool, tape: SharedTape) -> Outcome {
    tape.lock().unwrap().clear();
    let t2 = tape.clone();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            IN_RUN.with(|r| r.set(true));
            PANIC.with(|p| *p.borrow_mut() = None);
            let sim = Sim::new(src, trace, t2);
            // Randomness the code under test asks for: one stream per run.
            let salt = sim.pick(1 << 24);
            seam::activate(crate::rng::mix(seed, salt));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&sim)));
            let (violation, harness_error) = match r {
                Ok(Ok(())) => (None, None),
                Ok(Err(v)) if v.msg.starts_with(HARNESS_TAG) => (None, Some(v.msg)),
                Ok(Err(v)) => (Some(v), None),
                Err(p) => {
                    let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                    if p.downcast_ref::<ChoiceOverflow>().is_some() {
                        (Some(Violation::new("unbounded-run", "run drew more choices than its bound: no progress")), None)
                    } else if m.starts_with(HARNESS_TAG) {
                        (None, Some(m))
                    } else {
                        std::mem::forget(p);
                        (Some(Violation::new("panic", format!("panicked: {m}"))), None)
                    }
                }
            };
            let stats = sim.finish();
            let log = sim.take_log();
            seam::deactivate();
            (violation, harness_error, stats, log)
        })
        .expect("spawn run thread");
    let (violation, harness_error, stats, log) = h.join().expect("run thread");
    let tape = std::mem::take(&mut *tape.lock().unwrap());
    Outcome { violation, harness_error, tape, stats, log }
}

fn run_seed(base: u64, prop: &str, scen: &str, idx: u64) -> u64 {
    mix(mix(hash_bytes(base, prop.as_bytes()), hash_bytes(1, scen.as_bytes())), idx)
}
/// Entropy seed: independent of the tape so that minimised tapes keep it.
fn entropy_seed(base: u64, prop: &str) -> u64 {
    mix(hash_bytes(base, prop.as_bytes()), 0xE27)
}

fn root() -> PathBuf {
    std::env::var_os("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

struct Known {
    prop: String,
    class: String,
    needle: String,
    text: String,
}
/// `open: property=<id> class=<class> match=<substring> :: <what fails>`
fn load_known() -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(root().join("known_findings.txt")) {
        for l in s.lines() {
            let Some(r) = l.strip_prefix("open: ") else { continue };
            let Some((head, text)) = r.split_once(" :: ") else { continue };
            let get = |k: &str| -> String {
                head.find(k)
                    .map(|p| {
                        let rest = &head[p + k.len()..];
                        let end = ["property=", " class=", " match="]
                            .iter()
                            .filter_map(|n| rest.find(n))
                            .min()
                            .unwrap_or(rest.len());
                        rest[..end].trim().to_string()
                    })
                    .unwrap_or_default()
            };
            v.push(Known { prop: get("property="), class: get("class="), needle: get("match="), text: text.to_string() });
        }
    }
    v
}
fn known_match<'a>(k: &'a [Known], prop: &str, v: &Violation) -> Option<&'a Known> {
    k.iter().find(|k| k.prop == prop && k.class == v.class && !k.needle.is_empty() && v.msg.contains(&k.needle))
}

#[derive(Default)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    sim_ns: u128,
    faults: BTreeMap<&'static str, u64>,
    fault_runs: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    fps: HashSet<u64>,
    states: HashSet<u64>,
    per_scen: BTreeMap<&'static str, u64>,
    known: BTreeMap<usize, (u64, String)>,
    faultfree: u64,
}

type Found = (u64, usize, Violation, Vec<u64>);

struct Slot {
    started: f64,
    tape: SharedTape,
    scen: usize,
    idx: u64,
    active: bool,
}

pub fn main(props: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => supervise(&args),
        Some("search") => search(&props, &args[2], &args[3]),
        Some("replay") => replay(&props, &args[2], args.iter().any(|a| a == "--trace")),
        Some("determinism") => determinism(&props, &args),
        Some("one") => one(&props, &args),
        Some("list") => {
            for p in &props { println!("{}", p.id); }
            0
        }
        _ => {
            eprintln!("usage: check PROP quick|thorough | replay FILE [--trace] | determinism PROP N | one PROP SCEN IDX");
            2
        }
    };
    std::process::exit(code)
}

fn find<'a>(props: &'a [Property], id: &str) -> &'a Property {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn base_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
fn workers() -> usize {
    std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
    })
}
fn hang_secs() -> f64 {
    std::env::var("SIM_HANG_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(120.0)
}

fn pick_scen(p: &Property, i: u64) -> usize {
    let total: u64 = p.scenarios.iter().map(|s| s.weight).sum();
    // Low-discrepancy assignment so that every prefix respects the weights.
    let x = mix(0x5ce7, i) % total;
    let mut a = 0;
    for (k, s) in p.scenarios.iter().enumerate() {
        a += s.weight;
        if x < a { return k; }
    }
    0
}

fn write_replay(p: &Property, scen: usize, base: u64, idx: u64, v: &Violation, tape: &[u64], orig_len: usize, log: &[String], digest: u64) -> PathBuf {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let h = hash_bytes(scen as u64, &tape.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>());
    let path = dir.join(format!("{}-{}-{:016x}.json", p.id, p.scenarios[scen].name, h));
    let j = json!({
        "property": p.id,
        "scenario": p.scenarios[scen].name,
        "verif_seed": base,
        "run_index": idx,
        "run_seed": run_seed(base, p.id, p.scenarios[scen].name, idx).to_string(),
        "entropy_seed": entropy_seed(base, p.id).to_string(),
        "class": v.class,
        "violation": v.msg,
        "digest": digest.to_string(),
        "tape": tape,
        "original_choices": orig_len,
        "minimised_choices": tape.len(),
        "trace": log,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

/// Parent: runs the search in a child so that an abort (stack overflow,
/// allocation failure, double panic) of the code under test is reported too.
fn supervise(args: &[String]) -> i32 {
    let prop = &args[2];
    let tier = args.get(3).cloned().unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or("quick".into()));
    let base = base_seed();
    println!("simkit: property={prop} tier={tier} VERIF_SEED={base}");
    let _ = std::io::stdout().flush();
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(&exe)
        .args(["search", prop, &tier])
        .env("SIM_PROGRESS", progress_path(prop))
        .status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start search: {e}");
            return 2;
        }
    };
    if let Some(c) = st.code() {
        let _ = std::fs::remove_file(progress_path(prop));
        return c;
    }
    // Killed by a signal: find the run that does it.
    use std::os::unix::process::ExitStatusExt;
    let sig = st.signal().unwrap_or(0);
    eprintln!("search process died with signal {sig}");
    let data = std::fs::read(progress_path(prop)).unwrap_or_default();
    let _ = std::fs::remove_file(progress_path(prop));
    for c in data.chunks_exact(16) {
        let scen = u64::from_le_bytes(c[..8].try_into().unwrap());
        let idx = u64::from_le_bytes(c[8..].try_into().unwrap());
        if scen == u64::MAX { continue; }
        let s = std::process::Command::new(&exe)
            .args(["one", prop, &scen.to_string(), &idx.to_string()])
            .output();
        if let Ok(o) = s {
            if o.status.code().is_none() {
                let dir = root().join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let path = dir.join(format!("{prop}-abort-{scen}-{idx}.json"));
                let j = json!({"property": prop, "scenario_index": scen, "verif_seed": base, "run_index": idx,
                    "class": "abort", "violation": format!("process died with signal {:?}", o.status.signal()),
                    "by_index": true});
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
                println!("violation: class=abort: the code under test killed its process (signal {:?})", o.status.signal());
                println!("VIOLATION property={prop} replay={}", path.display());
                return 1;
            }
        }
    }
    eprintln!("abort not reproducible from a single run: harness error");
    2
}
fn progress_path(prop: &str) -> PathBuf {
    let d = root().join("target").join("progress");
    let _ = std::fs::create_dir_all(&d);
    d.join(format!("{prop}-{}", std::process::id()))
}

fn one(props: &[Property], a: &[String]) -> i32 {
    let p = find(props, &a[2]);
    let scen: usize = a[3].parse().ok().or_else(|| p.scenarios.iter().position(|s| s.name == a[3])).unwrap();
    let idx: u64 = a[4].parse().unwrap();
    let base = base_seed();
    let tr = std::env::var_os("SIM_TRACE").is_some();
    let o = run_once(p.scenarios[scen].run, Source::Seed(run_seed(base, p.id, p.scenarios[scen].name, idx)), entropy_seed(base, p.id), tr, Default::default());
    for l in &o.log { println!("{l}"); }
    println!("faults={:?} probes={:?} steps={} digest={:x}", o.stats.faults, o.stats.probes, o.stats.steps, o.stats.digest);
    if let Some(h) = o.harness_error { println!("{h}"); return 2; }
    match o.violation {
        Some(v) => { println!("violation {}: {}", v.class, v.msg); 1 }
        None => 0,
    }
}

fn search(props: &[Property], id: &str, tier: &str) -> i32 {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 200 << 30, rlim_max: 200 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    let p = find(props, id);
    let base = base_seed();
    let quick = tier != "thorough";
    let t0 = real_now();
    let max_runs = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { p.quick_runs } else { u64::MAX });
    let budget = std::env::var("SIM_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if quick { 420.0 } else { p.thorough_secs as f64 });
    let known = load_known();
    let eseed = entropy_seed(base, id);

    // Warm-up (process-wide lazy statics) and determinism self-check.
    let mut det_checked = 0u64;
    for (k, s) in p.scenarios.iter().enumerate() {
        let mut last: Option<u64> = None;
        for rep in 0..3 {
            let o = run_once(s.run, Source::Seed(run_seed(base, id, s.name, 1_000_000 + k as u64)), eseed, false, Default::default());
            if rep > 0 {
                if let Some(l) = last {
                    if l != o.stats.digest {
                        eprintln!("{HARNESS_TAG} scenario {} is not deterministic", s.name);
                        return 3;
                    }
                }
                last = Some(o.stats.digest);
                det_checked += 1;
            }
        }
    }

    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let agg = Arc::new(Mutex::new(Agg::default()));
    let found: Arc<Mutex<Vec<Found>>> = Default::default();
    let herr: Arc<Mutex<Option<String>>> = Default::default();
    let nw = workers();
    let slots: Vec<Arc<Mutex<Slot>>> = (0..nw)
        .map(|_| Arc::new(Mutex::new(Slot { started: 0.0, tape: Default::default(), scen: 0, idx: 0, active: false })))
        .collect();
    let progress = std::env::var_os("SIM_PROGRESS").map(|f| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(f).unwrap());
    let scen_fns: Vec<(&'static str, fn(&Sim) -> RunResult)> = p.scenarios.iter().map(|s| (s.name, s.run)).collect();
    let alive = AtomicU64::new(nw as u64);

    std::thread::scope(|sc| {
        for w in 0..nw {
            let (next, stop, agg, found, herr, slot) = (next.clone(), stop.clone(), agg.clone(), found.clone(), herr.clone(), slots[w].clone());
            let (scen_fns, known, progress, alive) = (&scen_fns, &known, &progress, &alive);
            sc.spawn(move || {
                let tape: SharedTape = slot.lock().unwrap().tape.clone();
                loop {
                    if stop.load(Ordering::SeqCst) || real_now() - t0 > budget { break; }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= max_runs { break; }
                    let k = pick_scen(p, i);
                    if let Some(f) = progress {
                        let mut b = [0u8; 16];
                        b[..8].copy_from_slice(&(k as u64).to_le_bytes());
                        b[8..].copy_from_slice(&i.to_le_bytes());
                        let _ = f.write_at(&b, w as u64 * 16);
                    }
                    {
                        let mut s = slot.lock().unwrap();
                        s.started = real_now();
                        s.scen = k;
                        s.idx = i;
                        s.active = true;
                    }
                    let o = run_once(scen_fns[k].1, Source::Seed(run_seed(base, p.id, scen_fns[k].0, i)), eseed, false, tape.clone());
                    slot.lock().unwrap().active = false;
                    if let Some(h) = o.harness_error {
                        *herr.lock().unwrap() = Some(format!("{} run {i}: {h}", scen_fns[k].0));
                        stop.store(true, Ordering::SeqCst);
                        break;
                    }
                    let mut a = agg.lock().unwrap();
                    a.runs += 1;
                    *a.per_scen.entry(scen_fns[k].0).or_default() += 1;
                    a.steps += o.stats.steps;
                    a.sim_ns += o.stats.sim_ns as u128;
                    if o.stats.faults.is_empty() { a.faultfree += 1; }
                    for (f, n) in &o.stats.faults {
                        *a.faults.entry(f).or_default() += n;
                        *a.fault_runs.entry(f).or_default() += 1;
                    }
                    for (f, n) in &o.stats.probes { *a.probes.entry(f).or_default() += n; }
                    let fresh = a.fps.insert(mix(o.stats.fingerprint, k as u64));
                    if fresh && o.stats.nontrivial { a.nontrivial += 1; }
                    if a.states.len() < 4_000_000 { a.states.extend(o.stats.states.iter().copied()); }
                    if let Some(v) = o.violation {
                        if let Some(kf) = known_match(known, p.id, &v) {
                            let ix = known.iter().position(|x| std::ptr::eq(x, kf)).unwrap();
                            let e = a.known.entry(ix).or_insert((0, v.msg.clone()));
                            e.0 += 1;
                        } else {
                            drop(a);
                            found.lock().unwrap().push((i, k, v, o.tape));
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                    }
                }
                if let Some(f) = progress {
                    let _ = f.write_at(&[0xff; 16], w as u64 * 16);
                }
                alive.fetch_sub(1, Ordering::SeqCst);
            });
        }
        // Watchdog.
        loop {
            if alive.load(Ordering::SeqCst) == 0 { break; }
            real_sleep(50);
            for s in &slots {
                let s = s.lock().unwrap();
                if s.active && real_now() - s.started > hang_secs() {
                    let tape = s.tape.try_lock().map(|t| t.clone()).unwrap_or_default();
                    let v = Violation::new("hang", format!("run did not return within {} s of real time (the code under test loops without yielding)", hang_secs()));
                    let path = write_replay(p, s.scen, base, s.idx, &v, &tape, tape.len(), &[], 0);
                    println!("violation: class=hang scenario={} run={}", p.scenarios[s.scen].name, s.idx);
                    write_evidence(p, tier, base, &agg.lock().unwrap(), real_now() - t0, 1, det_checked, nw, &[]);
                    println!("VIOLATION property={} replay={}", p.id, path.display());
                    let _ = std::io::stdout().flush();
                    std::process::exit(1);
                }
            }
        }
    });

    if let Some(h) = herr.lock().unwrap().clone() {
        eprintln!("{h}");
        return 2;
    }
    let wall = real_now() - t0;
    let agg = Arc::try_unwrap(agg).ok().unwrap().into_inner().unwrap();
    let mut found = std::mem::take(&mut *found.lock().unwrap());
    found.sort_by_key(|f| f.0);
    // For measuring what the checks see: the verdict is enough.
    if let (Some(f), true) = (found.first(), std::env::var_os("SIM_NOMIN").is_some()) {
        println!("violation: {}", f.2.msg.chars().take(300).collect::<String>());
        return 1;
    }

    // Samples: a few actual runs, re-executed with tracing.
    let mut samples = vec![];
    for k in 0..p.scenarios.len() {
        if let Some(i) = (0..2000u64).find(|i| pick_scen(p, *i) == k && *i < max_runs) {
            let o = run_once(scen_fns[k].1, Source::Seed(run_seed(base, p.id, scen_fns[k].0, i)), eseed, true, Default::default());
            let head: Vec<String> = o.log.iter().take(40).cloned().collect();
            samples.push(json!({"scenario": scen_fns[k].0, "run_index": i, "choices": o.tape.len(), "steps": o.stats.steps, "faults": o.stats.faults, "events_head": head}));
        }
    }

    if let Some((i, k, v, tape)) = found.into_iter().next() {
        println!("violation found in scenario {} run {} ({} choices): {}: {}", p.scenarios[k].name, i, tape.len(), v.class, v.msg);
        let f = p.scenarios[k].run;
        let min_budget = if quick { 45.0 } else { 240.0 };
        let (mtape, tries) = minimise(f, &tape, &v, eseed, min_budget, &known, p.id);
        let o = run_once(f, Source::Tape(mtape.clone()), eseed, true, Default::default());
        let (tape_final, o) = match &o.violation {
            Some(v2) if v2.class == v.class => (mtape, o),
            _ => {
                let o = run_once(f, Source::Tape(tape.clone()), eseed, true, Default::default());
                (tape.clone(), o)
            }
        };
        let v2 = o.violation.clone().unwrap_or(v.clone());
        let path = write_replay(p, k, base, i, &v2, &tape_final, tape.len(), &o.log, o.stats.digest);
        println!("minimised {} -> {} choices in {} tries", tape.len(), tape_final.len(), tries);
        println!("violation: class={} {}", v2.class, v2.msg);
        for l in o.log.iter().rev().take(25).rev() { println!("  {l}"); }
        // Fresh-process replay.
        let st = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", path.to_str().unwrap()])
            .output();
        match st {
            Ok(o) if o.status.code() == Some(1) => println!("replay reproduced in a fresh process"),
            _ => println!("warning: replay did not reproduce in a fresh process"),
        }
        write_evidence(p, tier, base, &agg, wall, 1, det_checked, nw, &samples);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }

    for (ix, (n, m)) in &agg.known {
        println!("KNOWN-FINDING: property={} {} (hit {n} times; e.g. {m})", p.id, known[*ix].text);
    }
    // A listed finding is also demonstrated when the batch happens not to hit it.
    let missed: Vec<&&str> = p.must_hit.iter().filter(|h| !agg.probes.contains_key(*h) && !agg.faults.contains_key(*h)).collect();
    if !missed.is_empty() {
        println!("note: probes not hit in this batch: {missed:?}");
    }
    write_evidence(p, tier, base, &agg, wall, 0, det_checked, nw, &samples);
    println!(
        "ok property={} runs={} distinct={} states={} faults={} steps={} sim={:.1}s wall={:.1}s ({:.0} runs/h)",
        p.id, agg.runs, agg.fps.len(), agg.states.len(), agg.faults.values().sum::<u64>(), agg.steps,
        agg.sim_ns as f64 / 1e9, wall, agg.runs as f64 / wall * 3600.0
    );
    0
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(p: &Property, tier: &str, base: u64, a: &Agg, wall: f64, violations: u64, det: u64, nw: usize, samples: &[Value]) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut samples = samples.to_vec();
    if samples.is_empty() { samples.push(json!("none recorded")); }
    let j = json!({
        "property": p.id,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": base,
        "level": p.level,
        "coverage": {
            "evaluations": a.runs,
            "distinct_nontrivial": a.nontrivial.min(a.fps.len() as u64),
            "rule": p.rule,
            "samples": samples,
            "runs_per_hour": (a.runs as f64 / wall.max(1e-9) * 3600.0) as u64,
            "seeds_per_hour": (a.runs as f64 / wall.max(1e-9) * 3600.0) as u64,
            "simulated_seconds": a.sim_ns as f64 / 1e9,
            "scheduler_steps": a.steps,
            "faults_injected": a.faults,
            "runs_with_fault": a.fault_runs,
            "fault_free_runs": a.faultfree,
            "distinct_interleavings": a.fps.len(),
            "distinct_states": a.states.len(),
            "interleaving_measure": "hash of the sequence of scheduling decisions, delivered events and injected faults of a run",
            "state_measure": "hashes of abstract states noted by the scenario, plus consecutive pairs of faults and outcomes",
            "probes": a.probes,
            "probes_missed": p.must_hit.iter().filter(|h| !a.probes.contains_key(*h) && !a.faults.contains_key(*h)).collect::<Vec<_>>(),
            "runs_per_scenario": a.per_scen,
            "determinism_double_runs": det,
            "workers": nw,
            "components_real": p.real,
            "components_stub": p.stub,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&j).unwrap());
}

/// Tape shrinking: drop chunks, zero chunks, lower single values.
fn minimise(f: fn(&Sim) -> RunResult, tape: &[u64], v: &Violation, eseed: u64, budget: f64, known: &[Known], prop: &str) -> (Vec<u64>, u64) {
    let t0 = real_now();
    let tries = std::cell::Cell::new(0u64);
    let seen: RefCell<HashMap<u64, bool>> = RefCell::new(HashMap::new());
    let fails = |t: &[u64]| -> Option<Vec<u64>> {
        let h = t.iter().fold(17u64, |h, x| mix(h, *x));
        if seen.borrow().contains_key(&h) { return None; }
        tries.set(tries.get() + 1);
        let o = run_once(f, Source::Tape(t.to_vec()), eseed, false, Default::default());
        let bad = matches!(&o.violation, Some(v2) if v2.class == v.class && known_match(known, prop, v2).is_none());
        seen.borrow_mut().insert(h, bad);
        // Normalise to what was actually consumed.
        if bad { Some(o.tape) } else { None }
    };
    let out = || real_now() - t0 > budget;
    let mut cur = match fails(tape) {
        Some(t) => t,
        None => return (tape.to_vec(), tries.get()),
    };
    let trim = |t: &mut Vec<u64>| while t.last() == Some(&0) { t.pop(); };
    trim(&mut cur);
    loop {
        let before = cur.clone();
        // 1. delete / zero chunks.
        let mut size = (cur.len() / 2).max(1);
        while size >= 1 && !out() {
            let mut i = 0;
            while i < cur.len() && !out() {
                let end = (i + size).min(cur.len());
                let mut c = cur.clone();
                c.drain(i..end);
                if let Some(mut t) = fails(&c) {
                    trim(&mut t);
                    if t.len() < cur.len() { cur = t; continue; }
                }
                if cur[i..end].iter().any(|x| *x != 0) {
                    let mut c = cur.clone();
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    if let Some(mut t) = fails(&c) {
                        trim(&mut t);
                        if t.len() <= cur.len() { cur = t; }
                    }
                }
                i += size;
            }
            if size == 1 { break; }
            size /= 2;
        }
        // 2. lower values.
        let mut i = 0;
        while i < cur.len() && !out() {
            if cur[i] > 0 {
                let mut lo = 0u64;
                let mut hi = cur[i];
                while lo < hi && !out() && i < cur.len() {
                    let m = lo + (hi - lo) / 2;
                    let mut c = cur.clone();
                    c[i] = m;
                    match fails(&c) {
                        Some(mut t) => {
                            trim(&mut t);
                            if t.len() <= cur.len() && t.len() > i { hi = t[i].min(m); cur = t; } else { lo = m + 1; }
                        }
                        None => lo = m + 1,
                    }
                }
            }
            i += 1;
        }
        if cur == before || out() { break; }
    }
    (cur, tries.get())
}

fn replay(props: &[Property], file: &str, trace: bool) -> i32 {
    let s = match std::fs::read_to_string(Path::new(file)) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let j: Value = serde_json::from_str(&s).unwrap();
    let p = find(props, j["property"].as_str().unwrap());
    let base = j["verif_seed"].as_u64().unwrap();
    if j["by_index"].as_bool() == Some(true) {
        let k = j["scenario_index"].as_u64().unwrap() as usize;
        let idx = j["run_index"].as_u64().unwrap();
        run_once(p.scenarios[k].run, Source::Seed(run_seed(base, p.id, p.scenarios[k].name, idx)), entropy_seed(base, p.id), false, Default::default());
        println!("no violation on replay");
        return 0;
    }
    let k = p.scenarios.iter().position(|s| Some(s.name) == j["scenario"].as_str()).unwrap();
    let tape: Vec<u64> = j["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let es: u64 = j["entropy_seed"].as_str().unwrap().parse().unwrap();
    // Same warm-up as the search, so that lazy statics never matter.
    run_once(p.scenarios[k].run, Source::Seed(run_seed(base, p.id, p.scenarios[k].name, 1_000_000 + k as u64)), entropy_seed(base, p.id), false, Default::default());
    let o = run_once(p.scenarios[k].run, Source::Tape(tape), es, true, Default::default());
    if trace {
        for l in &o.log { println!("{l}"); }
    }
    match o.violation {
        Some(v) => {
            let same = v.class == j["class"].as_str().unwrap_or("") && o.stats.digest.to_string() == j["digest"].as_str().unwrap_or("");
            println!("replayed: class={} {} (exact={same})", v.class, v.msg);
            println!("VIOLATION property={} replay={file}", p.id);
            1
        }
        None => {
            println!("no violation on replay");
            0
        }
    }
}

/// Prints one digest per run, for cross-process comparison.
fn determinism(props: &[Property], a: &[String]) -> i32 {
    let p = find(props, &a[2]);
    let n: u64 = a[3].parse().unwrap();
    let base = base_seed();
    let es = entropy_seed(base, p.id);
    for (k, s) in p.scenarios.iter().enumerate() {
        run_once(s.run, Source::Seed(run_seed(base, p.id, s.name, 1_000_000 + k as u64)), es, false, Default::default());
    }
    let out: Mutex<BTreeMap<u64, String>> = Default::default();
    let next = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for _ in 0..workers() {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n { break; }
                let k = pick_scen(p, i);
                let o = run_once(p.scenarios[k].run, Source::Seed(run_seed(base, p.id, p.scenarios[k].name, i)), es, false, Default::default());
                out.lock().unwrap().insert(i, format!("{i} {} {:016x} {:016x} {} {}", p.scenarios[k].name, o.stats.digest, o.stats.fingerprint, o.stats.steps, o.violation.map(|v| v.class).unwrap_or_default()));
            });
        }
    });
    for l in out.lock().unwrap().values() { println!("{l}"); }
    0
}
