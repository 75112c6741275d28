//! Interposed entropy and clock.
//!
//! The final binary defines `getrandom` and `clock_gettime`, which take
//! precedence over libc's (std, the `getrandom` crates and `web_time` all end
//! up there; the binaries are linked with `-rdynamic` so that dlsym lookups
//! find these too).  On a thread that is executing a simulated run they serve
//! simulated values; elsewhere they perform the real system call.
use crate::rng::Rng;
use std::cell::{Cell, RefCell};

thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static ENTROPY: RefCell<Option<Rng>> = const { RefCell::new(None) };
    static NOW_NS: Cell<u64> = const { Cell::new(0) };
    static SKEW_NS: Cell<i64> = const { Cell::new(0) };
    static EPOCH_NS: Cell<u64> = const { Cell::new(0) };
    static ENTROPY_CALLS: Cell<u64> = const { Cell::new(0) };
    static CLOCK_CALLS: Cell<u64> = const { Cell::new(0) };
    static ENTROPY_FAULTS: RefCell<Option<(Rng, u64)>> = const { RefCell::new(None) };
    static ENTROPY_DEAD: Cell<bool> = const { Cell::new(false) };
    static ENTROPY_FAULTED: Cell<u64> = const { Cell::new(0) };
}

/// Default simulated wall-clock at the start of each run (seconds since epoch).
pub const DEFAULT_EPOCH_S: u64 = 1_750_000_000;

pub fn activate(seed: u64) {
    ENTROPY.with(|e| *e.borrow_mut() = Some(Rng::new(seed)));
    NOW_NS.with(|n| n.set(0));
    SKEW_NS.with(|n| n.set(0));
    EPOCH_NS.with(|n| n.set(DEFAULT_EPOCH_S * 1_000_000_000));
    ENTROPY_CALLS.with(|n| n.set(0));
    CLOCK_CALLS.with(|n| n.set(0));
    ENTROPY_FAULTS.with(|n| *n.borrow_mut() = None);
    ENTROPY_DEAD.with(|n| n.set(false));
    ENTROPY_FAULTED.with(|n| n.set(0));
    ACTIVE.with(|a| a.set(true));
}
/// One in `den` entropy requests on this thread is interrupted or served short.
pub fn set_entropy_faults(seed: u64, den: u64) { ENTROPY_FAULTS.with(|n| *n.borrow_mut() = Some((Rng::new(seed), den))) }
/// Every entropy request on this thread fails (EIO).
pub fn set_entropy_dead(dead: bool) { ENTROPY_DEAD.with(|n| n.set(dead)) }
pub fn entropy_faulted() -> u64 { ENTROPY_FAULTED.with(|n| n.get()) }
pub fn deactivate() {
    ACTIVE.with(|a| a.set(false));
}
/// Simulated nanoseconds since the start of the run.
pub fn now_ns() -> u64 { NOW_NS.with(|n| n.get()) }
pub fn set_now_ns(v: u64) { NOW_NS.with(|n| n.set(v)) }
pub fn advance_ns(d: u64) { NOW_NS.with(|n| n.set(n.get().saturating_add(d))) }
/// Wall-clock skew of the node that currently executes.
pub fn set_skew_ns(v: i64) { SKEW_NS.with(|n| n.set(v)) }
pub fn skew_ns() -> i64 { SKEW_NS.with(|n| n.get()) }
pub fn set_epoch_s(v: u64) { EPOCH_NS.with(|n| n.set(v * 1_000_000_000)) }
/// What `SystemTime::now()` reports on the current node, in ns since epoch.
pub fn wall_ns() -> u64 {
    let e = EPOCH_NS.with(|n| n.get());
    (e as i64 + now_ns() as i64 + skew_ns()).max(0) as u64
}
pub fn entropy_calls() -> u64 { ENTROPY_CALLS.with(|n| n.get()) }
pub fn clock_calls() -> u64 { CLOCK_CALLS.with(|n| n.get()) }

/// `Some(r)`: the result of the simulated call (-1 with errno set, or a count).
unsafe fn serve_entropy(buf: *mut u8, len: usize) -> Option<i64> {
    if !ACTIVE.try_with(|a| a.get()).unwrap_or(false) { return None; }
    let r = ENTROPY
        .try_with(|e| {
            let mut e = e.try_borrow_mut().ok()?;
            let r = e.as_mut()?;
            if len == 0 { return Some(0); }
            if ENTROPY_DEAD.with(|d| d.get()) {
                ENTROPY_FAULTED.with(|n| n.set(n.get() + 1));
                *libc::__errno_location() = libc::EIO;
                return Some(-1);
            }
            let mut n = len;
            if let Some((f, den)) = ENTROPY_FAULTS.with(|f| f.borrow_mut().take()) {
                let mut f = f;
                let hit = f.next() % den == 0;
                let kind = f.next();
                ENTROPY_FAULTS.with(|x| *x.borrow_mut() = Some((f, den)));
                if hit {
                    ENTROPY_FAULTED.with(|n| n.set(n.get() + 1));
                    if kind % 2 == 0 || len == 1 {
                        *libc::__errno_location() = libc::EINTR;
                        return Some(-1);
                    }
                    n = 1 + (kind >> 1) as usize % (len - 1);
                }
            }
            r.fill(std::slice::from_raw_parts_mut(buf, n));
            Some(n as i64)
        })
        .ok()
        .flatten();
    if r.is_some() { let _ = ENTROPY_CALLS.try_with(|n| n.set(n.get() + 1)); }
    r
}

unsafe fn raw_syscall(n: i64, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> i64 {
    let r: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// # Safety
/// libc contract.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if let Some(r) = serve_entropy(buf as *mut u8, len) { return r as libc::ssize_t; }
    raw_syscall(libc::SYS_getrandom, buf as u64, len as u64, flags as u64, 0, 0, 0) as libc::ssize_t
}

/// Some crates ask for entropy through `syscall(2)` directly.
///
/// # Safety
/// libc contract.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: libc::c_long, a: u64, b: u64, c: u64, d: u64, e: u64, f: u64) -> libc::c_long {
    if n == libc::SYS_getrandom {
        if let Some(r) = serve_entropy(a as *mut u8, b as usize) { return r; }
    }
    raw_syscall(n, a, b, c, d, e, f)
}

/// # Safety
/// libc contract.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if ACTIVE.try_with(|a| a.get()).unwrap_or(false) {
        let _ = CLOCK_CALLS.try_with(|n| n.set(n.get() + 1));
        let ns = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => wall_ns(),
            _ => now_ns().wrapping_add(1_000_000_000),
        };
        (*ts).tv_sec = (ns / 1_000_000_000) as libc::time_t;
        (*ts).tv_nsec = (ns % 1_000_000_000) as libc::c_long;
        return 0;
    }
    raw_syscall(libc::SYS_clock_gettime, clk as u64, ts as u64, 0, 0, 0, 0) as libc::c_int
}
